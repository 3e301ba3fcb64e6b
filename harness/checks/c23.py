"""C23: operators, priors and samplers keep no memory: any history of calls gives the answers of fresh objects."""
import numpy as np
from hypothesis import strategies as st

from harness import pristine
from harness.checks.c04 import make
from harness.core import Result, Target, close, require
from harness.gen import SEED, arr, arr_desc, bandlimits, build, mwn, np_seed, problems, quiet, rng, start_vec, wav_configs
from harness.sphere import make_mask, make_ngal, mask_desc, ngal_desc

PROPERTY = "C23"
RULE = (
    "Model-based histories: 2..14 operations drawn from {forward, gradient, prior, prox, log-posterior, transform and measurement calls, runs of the samplers, runs that an "
    "exception in the operator ends early} on "
    "shared objects (dense problems; spherical wavelet / path / weak-lensing problems); the model is a fresh copy of every object for each call. Results are "
    "overwritten by the history between calls; arguments, data, errors and parameters are compared with copies; NumPy's global random state must be "
    "untouched by the deterministic calls. worlds: objects and functions of several configurations that differ in one parameter, used in turn; the model is a process in which "
    "nothing was called before (one fork per call). Non-trivial: at least one call is repeated with other calls in between, or a sampler runs between calls."
)
CFGS = wav_configs(3, 9, Bs=(1.5, 2, 3), maxJ=2)
EDIT = st.sampled_from([None, None, None, "reverse", "swap", "last", "scale"])
DET = ["forward", "gradg", "prior", "prox", "logpi"]
RUNS = ["myula", "pxmala", "pxmala_tuned", "skrock"]
ABORTS = ["abort:myula", "abort:pxmala", "abort:skrock"]


class Interrupt(Exception):
    pass


def interrupted_run(kind, op, prior, samplers, par, x, when, seed, reuse):
    """A run that the user's operator ends with an exception at its `when`-th evaluation."""
    m = samplers.get(kind) if reuse else None
    if m is None:
        m = samplers[kind] = make(kind, op, prior, par)
    name = "adjoint" if when % 2 else "forward"
    real, left = getattr(op.measurement, name), [when // 2]

    def failing(v):
        if left[0] == 0:
            raise Interrupt
        left[0] -= 1
        return real(v)

    setattr(op.measurement, name, failing)
    try:
        with np_seed(seed), quiet():
            m.run(x)
    except Interrupt:
        pass
    finally:
        delattr(op.measurement, name)


@st.composite
def op_lists(draw, kinds, npts, most):
    """Histories: any calls, or mostly one kind of call at one (re-used, edited) array."""
    one = st.tuples(st.sampled_from(kinds), st.integers(0, npts - 1), st.booleans(), EDIT)
    if draw(st.booleans()):
        return draw(st.lists(one, min_size=2, max_size=most))
    fav = st.tuples(st.just(draw(st.sampled_from(kinds))), st.just(draw(st.integers(0, npts - 1))), st.booleans(),
                    st.sampled_from([None, "reverse", "reverse", "swap", "last", "scale", "flip", "flip", "tiny"]))
    return draw(st.lists(st.one_of(fav, fav, one), min_size=2, max_size=most))


@st.composite
def histories(draw):
    return {
        "p": draw(problems(nmax=5)),
        "ops": draw(op_lists(DET * 3 + RUNS + ABORTS, 3, 14)),
        "when": draw(st.integers(0, 12)),
        "x": draw(st.lists(arr_desc(scales=(-1, 2)), min_size=3, max_size=3)),
        "lmda": draw(st.sampled_from([0.1, 1.0])),
        "seed": draw(SEED),
        "reuse": draw(st.booleans()),
    }


def edited(x, how):
    if how == "reverse":  # same entries, same sum
        return x[::-1].copy()
    if how == "swap" and x.size > 1:
        y = x.copy()
        y[[0, -1]] = y[[-1, 0]]
        return y
    if how == "last":
        y = x.copy()
        y[-1] = 1.5 - y[-1]
        return y
    if how == "flip":  # same magnitudes
        y = x.copy()
        y[::2] *= -1
        return y
    if how == "tiny":  # a point next to the last one
        return x * (1 + 1e-6)
    return -0.5 * x


def freeze(a):
    return a.copy() if isinstance(a, np.ndarray) else a


def unchanged(a, b):
    return np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b


class RngGuard:
    """Deterministic calls leave numpy's global generator alone."""

    def __enter__(self):
        self.s = np.random.get_state()

    def __exit__(self, t, *a):
        if t is None:
            e = np.random.get_state()
            require(e[2:] == self.s[2:] and np.array_equal(e[1], self.s[1]), "a deterministic call consumes random numbers")


def run(c):
    from pxmcmc.mcmc import PxMCMCParams

    ref, op, prior = build(c["p"])
    xs = [start_vec(ref, d) for d in c["x"]]
    par = PxMCMCParams(lmda=c["lmda"], delta=0.5 / ref.lipschitz(c["lmda"]), mu=c["p"]["mu"], s=2, nsamples=4, nburn=2, ngap=2,
                       complex=ref.cplx_params, verbosity=0, track=["logposterior", "L2", "prior", "chain", "predictions"])
    par0 = {k: (list(v) if isinstance(v, list) else v) for k, v in vars(par).items()}
    data0 = op.data.copy()
    live = {}

    def call(kind, op, prior, samplers, x):
        if kind == "forward":
            return op.forward(x)
        if kind == "gradg":
            return op.calc_gradg(ref.M @ x)
        if kind == "prior":
            return prior.prior(x)
        if kind == "prox":
            return prior.proxf(x)
        if kind == "logpi":
            if "lp" not in samplers:
                samplers["lp"] = make("myula", op, prior, par)
            return np.array(samplers["lp"].logpi(x, ref.M @ x))
        m = samplers.get(kind)
        if m is None or kind == "pxmala_tuned" or not c["reuse"]:
            m = samplers[kind] = make(kind, op, prior, par)
        with np_seed(c["seed"]), quiet():
            m.run(x)
        return m.chain.copy(), m.logPi.copy(), m.preds.copy(), m.L2s.copy(), m.priors.copy()

    seen, repeated = set(), False
    held = []
    for step, (kind, xi, spoil, edit) in enumerate(c["ops"]):
        x = xs[xi]
        if edit and not any(np.shares_memory(h, x) for h, _, _ in held):  # the caller reuses its array for another point
            x[...] = edited(x, edit)
        x0 = x.copy()
        if kind in ABORTS:
            interrupted_run(kind[6:], op, prior, live, par, x, c["when"], c["seed"], c["reuse"])
            require(np.array_equal(x, x0), "an interrupted run modifies its start point", call=kind, step=step)
            continue
        det = kind in DET
        if det:
            with RngGuard():
                got = call(kind, op, prior, live, x)
        else:
            got = call(kind, op, prior, live, x)
        require(np.array_equal(x, x0), "a call modifies its argument", call=kind, step=step)
        if not det and not c["reuse"]:
            m = live[kind]
            held += [(a, a.copy(), kind) for a in (m.chain, m.logPi, m.preds, m.L2s, m.priors)]
        _, fop, fprior = build(c["p"])
        exp = call(kind, fop, fprior, {}, x0.copy())
        for g, e in zip(got if isinstance(got, tuple) else (got,), exp if isinstance(exp, tuple) else (exp,)):
            close(g, e, "a call answers differently after this history", rtol=1e-8, scale=float(np.abs(e).max()) if np.size(e) else 1.0, atol=1e-300,
                  call=kind, step=step, history=[o[0] for o in c["ops"][: step + 1]])
        require(np.array_equal(op.data, data0), "the data are modified", call=kind)
        require({k: v for k, v in vars(par).items()} == par0, "the run parameters are modified", call=kind, got=vars(par), expected=par0)
        if spoil and det and isinstance(got, np.ndarray) and got.ndim and got.flags.writeable and not np.shares_memory(got, x):
            got[...] = np.nan  # results belong to the caller
        elif det and isinstance(got, np.ndarray) and got.ndim:
            held.append((got, got.copy(), kind))
        for h, h0, hk in held:
            require(np.array_equal(h, h0, equal_nan=True), "a result handed out earlier is changed by a later call", result_of=hk, call=kind,
                    history=[o[0] for o in c["ops"][: step + 1]])
        repeated |= (kind, xi) in seen or kind in RUNS
        seen.add((kind, xi))
    return Result(repeated, [o[0] for o in c["ops"]])


@st.composite
def sphere(draw):
    return {
        "cfg": draw(st.sampled_from(CFGS)),
        "op": draw(st.sampled_from(["swt", "path", "wl", "wlh"])),
        "setting": draw(st.sampled_from(["analysis", "synthesis"])),
        "vec": draw(st.booleans()),
        "mask": draw(mask_desc),
        "ngal": draw(ngal_desc),
        "power": draw(st.booleans()),
        "ops": draw(op_lists(["forward", "gradg", "prior", "prox", "t.forward", "t.inverse", "t.forward_adjoint", "t.inverse_adjoint", "m.forward", "m.adjoint"],
                             2, 12)),
        "x": draw(st.lists(arr_desc(scales=(-1, 2)), min_size=2, max_size=2)),
        "seed": draw(SEED),
    }


def run_sphere(c):
    from scipy import sparse

    from pxmcmc.forward import ForwardOperator, PathIntegralOperator, SphericalWaveletTransformOperator
    from pxmcmc.measurements import WeakLensing, WeakLensingHarmonic
    from pxmcmc.prior import L1, S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights
    from pxmcmc.transforms import SphericalWaveletTransform

    L, B, J = c["cfg"]
    g = rng(c["seed"])
    harm = c["op"] == "wlh"
    npx = L * L if harm else mwn(L)
    A = g.random((7, npx))
    mask, ngal = make_mask(c["mask"], L), make_ngal(c["ngal"], L)
    nd = {"swt": npx, "path": 7, "wlh": npx}.get(c["op"]) or (npx if mask is None else int(mask.astype(bool).sum()))
    data = g.standard_normal(nd) + 1j * g.standard_normal(nd)
    sig = 0.5 + g.random(nd) if c["vec"] else 0.7
    P = sparse.csr_matrix(A)
    shared = [data, sig, mask, ngal]
    copies = [freeze(a) for a in shared]
    P0 = A.copy()

    def fresh():
        if c["op"] == "swt":
            op = SphericalWaveletTransformOperator(data, sig, c["setting"], L, B, J)
        elif c["op"] == "path":
            op = PathIntegralOperator(P, data, sig, c["setting"], L, B, J)
        else:
            tr = SphericalWaveletTransform(L, B, J, harmonic=harm)
            me = WeakLensingHarmonic(L) if harm else WeakLensing(L, mask, ngal)
            op = ForwardOperator(data, sig, c["setting"], tr, me, nparams=npx if c["setting"] == "analysis" else tr.ncoefs)
        t = op.transform
        if c["setting"] == "synthesis" and not harm:
            cls = S2_Wavelets_L1_Power_Weights if c["power"] else S2_Wavelets_L1
            pr = cls("synthesis", t.inverse, t.inverse_adjoint, 0.3, L, B, J)
        else:
            pr = L1(c["setting"], t.inverse, t.inverse_adjoint, 0.3)
        return op, pr

    op, pr = fresh()
    nco = op.transform.ncoefs
    npar = npx if c["setting"] == "analysis" else nco
    size = {"forward": npar, "gradg": nd, "prior": npar, "prox": npar, "t.forward": npx, "t.inverse": nco, "t.forward_adjoint": nco, "t.inverse_adjoint": npx,
            "m.forward": npx, "m.adjoint": nd}

    def call(kind, op, pr, x):
        if kind == "forward":
            return op.forward(x)
        if kind == "gradg":
            return op.calc_gradg(x)
        if kind == "prior":
            return pr.prior(x)
        if kind == "prox":
            return pr.proxf(x)
        return getattr(op.transform if kind[0] == "t" else op.measurement, kind[2:])(x)

    seen, repeated = set(), False
    held, own = [], {}
    for step, (kind, xi, spoil, edit) in enumerate(c["ops"]):
        x = own.setdefault((size[kind], xi), arr(c["x"][xi], size[kind], True))
        if edit and not any(np.shares_memory(h, x) for h, _, _ in held):
            x[...] = edited(x, edit)
        x0 = x.copy()
        with RngGuard():
            got = call(kind, op, pr, x)
        require(np.array_equal(x, x0), "a call modifies its argument", call=kind)
        fop, fpr = fresh()
        exp = call(kind, fop, fpr, x0.copy())
        close(got, exp, "a call answers differently after this history", rtol=1e-9, scale=float(np.abs(exp).max()) if np.size(exp) else 1.0, atol=1e-300,
              call=kind, step=step, op=c["op"], setting=c["setting"])
        for a, b in zip(shared, copies):
            require(unchanged(a, b), "data, errors, mask or galaxy counts are modified", call=kind)
        require(np.array_equal(P.toarray(), P0), "the path matrix is modified", call=kind)
        if spoil and isinstance(got, np.ndarray) and got.ndim and got.flags.writeable and not np.shares_memory(got, x):
            got[...] = np.nan
        elif isinstance(got, np.ndarray) and got.ndim:
            held.append((got, got.copy(), kind))
        for h, h0, hk in held:
            require(np.array_equal(h, h0, equal_nan=True), "a result handed out earlier is changed by a later call", result_of=hk, call=kind)
        repeated |= (kind, xi) in seen
        seen.add((kind, xi))
    return Result(repeated or len(seen) > 3, [c["op"], c["setting"]])


@st.composite
def utils_cases(draw):
    return {"n": draw(st.integers(1, 12)), "L": draw(st.integers(2, 6)), "x": draw(arr_desc()), "cplx": draw(st.booleans()),
            "ops": draw(st.lists(st.sampled_from(["soft", "cir", "crt", "integrate", "weights", "areas", "flatten", "expand", "expand2", "snr"]), min_size=2, max_size=10))}


def run_utils(c):
    """Free functions: same answer whatever was called before, arguments untouched, results owned by the caller."""
    from pxmcmc import uncertainty, utils

    n, L = c["n"], c["L"]
    x = arr(c["x"], n, c["cplx"])
    r = arr(c["x"], 3 * n).reshape(3, n)
    f = arr(c["x"], mwn(L), c["cplx"])
    flat = arr(c["x"], 3 * n, c["cplx"])
    call = {
        "soft": lambda: utils.soft(x, 0.2),
        "cir": lambda: uncertainty.credible_interval_range(r, 0.1),
        "crt": lambda: np.asarray(uncertainty.credible_region_threshold(r[0], 0.1)),
        "integrate": lambda: np.asarray(utils.s2_integrate(f, L)),
        "weights": lambda: utils.mw_map_weights(L),
        "areas": lambda: utils.calc_pixel_areas(L),
        "flatten": lambda: utils.flatten_mlm(flat[n:].reshape(n, 2), flat[:n]),
        "expand": lambda: utils.expand_mlm(flat, nscales=2)[0],
        "expand2": lambda: np.array(utils.expand_mlm(flat, nscalcoefs=n)[0]),
        "snr": lambda: np.asarray(utils.norm(x)),
    }
    ins = [x, r, f, flat]
    before = [a.copy() for a in ins]
    first = {}
    for k in c["ops"]:
        with RngGuard():
            v = call[k]()
        require(all(np.array_equal(a, b) for a, b in zip(ins, before)), "a function modifies its argument", call=k)
        if k in first:
            close(v, first[k], "a function answers differently the second time", rtol=1e-12, atol=1e-300, call=k)
        first.setdefault(k, np.array(v, copy=True))
        if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable and not any(np.shares_memory(v, a) for a in ins):
            v[...] = 123.0
    return Result(len(first) < len(c["ops"]))


# ---------------------------------------------------------------- objects of several configurations in one process
def near_configs():
    """Groups of configurations that agree in all but one parameter."""
    by = {}
    for L, B, J in CFGS:
        for key in ((L, B, None), (L, None, J), (None, B, J)):
            by.setdefault(key, []).append((L, B, J))
    for L, B, J in wav_configs(3, 9, Bs=(1.55, 1.58, 2.04, 2.2, 2.3, 3.05, 3.3), maxJ=2):  # dilations next to each other
        near = {1: 1.5, 2: 2, 3: 3}[int(B)]
        if (L, near, J) in CFGS and bandlimits(L, B, J) != bandlimits(L, near, J):
            by.setdefault((L, "near", J, near), [(L, near, J)]).append((L, B, J))
    return [v for v in by.values() if len(v) > 1]


GROUPS = near_configs()
FUNCS = ["weights", "areas", "integrate", "mask", "soft", "hard", "cheb1", "cheb2", "chebder", "cir", "wcir", "crt", "snr", "flatten", "expand"]


@st.composite
def worlds(draw):
    grp = draw(st.sampled_from(GROUPS))
    cfgs = st.sampled_from(grp)
    small = st.integers(0, 2)
    calls = st.sampled_from(["forward", "inverse", "forward_adjoint", "inverse_adjoint"])
    objs = st.one_of(
        st.tuples(st.just("swt"), cfgs, st.sampled_from([1, 1, 2]), st.sampled_from([0, 0, 2]), st.booleans(), calls, small),
        st.tuples(st.just("wl"), cfgs, small, small, st.sampled_from(["forward", "adjoint"]), small),
        st.tuples(st.just("wlh"), cfgs, st.sampled_from(["forward", "adjoint", "sks_estimate"]), small),
        st.tuples(st.just("path"), small, st.integers(2, 3), st.integers(2, 3), st.sampled_from(["forward", "adjoint"]), small),
        st.tuples(st.just("ident"), st.integers(2, 3), st.integers(2, 3), st.sampled_from(["forward", "adjoint"]), small),
        st.tuples(st.just("prior"), st.sampled_from(["S2", "power"]), cfgs, st.sampled_from([0.1, 0.2]), st.sampled_from([0, 1, 2]),
                  st.sampled_from(["prior", "proxf"]), small),
        st.tuples(st.just("op"), st.sampled_from(["swt", "path"]), cfgs, st.sampled_from(["analysis", "synthesis"]), st.sampled_from([0.5, 2.0]),
                  st.sampled_from(["forward", "gradg"]), small),
        st.tuples(st.just("fn"), st.sampled_from(FUNCS), cfgs, small, small),
        st.tuples(st.just("run"), st.sampled_from(RUNS), small, st.integers(1, 3), st.booleans(), small),
    )
    if draw(st.booleans()):  # mostly one kind of object, in several configurations
        kind = draw(st.sampled_from(["swt", "wl", "prior", "op", "fn", "run", "fn", "prior"]))
        objs = objs.filter(lambda o: o[0] == kind)
    return {"p": [draw(problems(nmax=3)) for _ in range(3)], "ops": draw(st.lists(objs, min_size=2, max_size=9)), "seed": draw(SEED),
            "spoil": draw(st.booleans())}


def world_call(req):
    """One call on objects built for it (`objs` keeps them for later calls of the same history)."""
    return world_step(req, {})


def world_step(req, objs):
    c, o = req
    o = [tuple(e) if isinstance(e, list) else e for e in o]
    kind = o[0]
    g = rng(c["seed"] + 7 * o[-1])

    def vec(n, cplx=True):
        return g.standard_normal(n) + (1j * g.standard_normal(n) if cplx else 0)

    def obj(key, make_):
        if key not in objs:
            objs[key] = make_()
        return objs[key]

    if kind == "swt":
        from pxmcmc.transforms import SphericalWaveletTransform

        _, (L, B, J), dirs, spin, har, meth, _ = o
        spin = spin if L > spin else 0
        t = obj(tuple(o[:5]), lambda: SphericalWaveletTransform(L, B, J, dirs=dirs, spin=spin, harmonic=har))
        n = (L * L if har else mwn(L)) if meth in ("forward", "inverse_adjoint") else t.ncoefs
        return getattr(t, meth)(vec(n))
    if kind == "wl":
        from pxmcmc.measurements import WeakLensing

        _, (L, _, _), mi, ni, meth, _ = o
        gm = rng(c["seed"] + mi)
        mask = None if mi == 0 else (gm.random((L, 2 * L - 1)) < 0.6).astype(int)
        ngal = None if ni == 0 else rng(c["seed"] + ni).integers(1, 9, (L, 2 * L - 1))
        m = obj(("wl", L, mi, ni), lambda: WeakLensing(L, mask, ngal))
        n = mwn(L) if meth == "forward" or mask is None else int(mask.sum())
        return getattr(m, meth)(vec(n))
    if kind == "wlh":
        from pxmcmc.measurements import WeakLensingHarmonic

        _, (L, _, _), meth, _ = o
        return getattr(obj(("wlh", L), lambda: WeakLensingHarmonic(L)), meth)(vec(L * L))
    if kind in ("path", "ident"):
        from scipy import sparse

        from pxmcmc.measurements import Identity, PathIntegral

        if kind == "path":
            _, pi, m, n, meth, _ = o
            me = obj(("path", pi, m, n), lambda: PathIntegral(sparse.csr_matrix(rng(c["seed"] + pi).random((m, n)))))
        else:
            _, m, n, meth, _ = o
            me = obj(("ident", m, n), lambda: Identity(m, n))
        return getattr(me, meth)(vec(n if meth == "forward" else m))
    if kind == "prior":
        from pxmcmc.prior import S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights

        _, which, (L, B, J), T, eta, meth, _ = o
        ident = lambda v: v  # noqa: E731
        pr = obj(tuple(o[:5]), lambda: S2_Wavelets_L1("synthesis", ident, ident, T, L, B, J) if which == "S2" else
                 S2_Wavelets_L1_Power_Weights("synthesis", ident, ident, T, L, B, J, eta=eta))
        return getattr(pr, meth)(vec(sum(mwn(b) for b in bandlimits(L, B, J))))
    if kind == "op":
        from scipy import sparse

        from pxmcmc.forward import PathIntegralOperator, SphericalWaveletTransformOperator

        _, which, (L, B, J), setting, sig, meth, _ = o
        gd = rng(c["seed"])
        if which == "swt":
            data = gd.standard_normal(mwn(L))
            op = obj(tuple(o[:5]), lambda: SphericalWaveletTransformOperator(data, sig, setting, L, B, J))
        else:
            A, data = gd.random((4, mwn(L))), gd.standard_normal(4)
            op = obj(tuple(o[:5]), lambda: PathIntegralOperator(sparse.csr_matrix(A), data, sig, setting, L, B, J))
        return op.forward(vec(op.nparams)) if meth == "forward" else op.calc_gradg(vec(len(data)))
    if kind == "fn":
        from pxmcmc import uncertainty, utils

        _, which, (L, B, J), k, _ = o
        x = vec(6)
        return {
            "weights": lambda: utils.mw_map_weights(L),
            "areas": lambda: utils.calc_pixel_areas(L, 1 + k) if k else utils.calc_pixel_areas(L),
            "integrate": lambda: utils.s2_integrate(vec(mwn(L)), L),
            "mask": lambda: utils.build_mask(L, 10.0 * (k + 1)),
            "soft": lambda: utils.soft(x, 0.2 * k),
            "hard": lambda: utils.hard(x.copy(), 0.3 * k),
            "cheb1": lambda: utils.chebyshev1(0.3 + k, L),
            "cheb2": lambda: utils.chebyshev2(0.3 + k, L),
            "chebder": lambda: utils.cheb1der(0.3 + k, L),
            "cir": lambda: uncertainty.credible_interval_range(vec(12, False).reshape(4, 3), 0.1 + 0.2 * k),
            "wcir": lambda: np.concatenate([a.ravel() for a in uncertainty.wavelet_credible_interval_range(
                vec(3 * sum(mwn(b) for b in bandlimits(L, B, J)), False).reshape(3, -1), L, B, J, 0.1 + 0.2 * k)]),
            "crt": lambda: uncertainty.credible_region_threshold(x.real, 0.1 + 0.2 * k),
            "snr": lambda: utils.snr(x, vec(6)),
            "flatten": lambda: utils.flatten_mlm(x.reshape(2, 3)[:, : 1 + k], x[: 1 + k]),
            "expand": lambda: np.concatenate([np.ravel(a) for a in utils.expand_mlm(x, nscalcoefs=1 + k)]),
        }[which]()
    from pxmcmc.mcmc import PxMCMCParams

    _, name, pi, s, given, _ = o
    ref, op, prior = obj(("problem", pi), lambda: build(c["p"][pi]))
    par = PxMCMCParams(lmda=0.5, delta=0.3 / ref.lipschitz(0.5), mu=c["p"][pi]["mu"], s=s, nsamples=3, nburn=1, ngap=2, complex=ref.cplx_params, verbosity=0,
                       track=["logposterior", "L2", "prior", "chain", "predictions"])
    m = make(name, op, prior, par)
    with np_seed(c["seed"] + o[-1]), quiet():
        m.run(vec(ref.n, ref.cplx_params) if given else None)
    return np.concatenate([m.chain.ravel(), m.logPi, m.preds.ravel(), m.L2s, m.priors])


def run_worlds(c):
    pristine.start(world_call)
    objs, kinds = {}, set()
    for step, o in enumerate(c["ops"]):
        how, exp = pristine.ask((c, o))
        try:
            got = world_step((c, o), objs)
        except Exception as e:
            if how == "raised":
                continue
            raise e
        require(how == "ok", "a call raises only when nothing was called before", call=o, fresh=exp)
        a, b = np.asarray(got), np.asarray(exp)
        close(a, b, "a call answers differently after this history than in a fresh process", rtol=1e-9, scale=float(np.abs(b).max()) if b.size else 1.0, atol=1e-300,
              call=o, step=step, history=c["ops"][: step + 1])
        require((a.dtype.kind == "c") == (b.dtype.kind == "c"), "a call answers with another type after this history", call=o, step=step, got=str(a.dtype),
                expected=str(b.dtype))
        if c["spoil"] and isinstance(got, np.ndarray) and got.ndim and got.flags.writeable:
            got[...] = 77.0
        kinds.add(tuple(map(str, o[:2])))
    return Result(len(kinds) > 1, [o[0] for o in c["ops"]])


DEFAULTS = {"lmda": 3e-5, "delta": 1e-5, "s": 1, "mu": 1, "nsamples": 10**6, "nburn": 1000, "ngap": 100, "complex": False, "verbosity": 100,
            "track": ["logposterior", "L2", "prior", "chain"]}


@st.composite
def params_cases(draw):
    op = st.tuples(st.sampled_from(["new", "new", "given", "append", "remove", "set"]), st.integers(0, 5),
                   st.sampled_from(["lmda", "delta", "s", "mu", "nsamples", "nburn", "ngap", "verbosity"]), st.integers(1, 9))
    return {"ops": draw(st.lists(op, min_size=2, max_size=8))}


def run_params(c):
    """Parameter objects are independent of each other and of the lists they were made from."""
    from pxmcmc.mcmc import PxMCMCParams

    objs = []  # (object, model)
    given = ["chain", "prior"]
    edited = False
    for kind, i, name, v in c["ops"]:
        if kind in ("new", "given"):
            kw = {name: v} if v > 4 else {}
            if kind == "given":
                kw["track"] = given
            o = PxMCMCParams(**kw)
            objs.append((o, {**DEFAULTS, **kw, "track": list(kw.get("track", DEFAULTS["track"]))}))
        elif objs:
            o, m = objs[i % len(objs)]
            if kind == "set":
                setattr(o, name, v)
                m[name] = v
            elif kind == "append":
                o.track.append("predictions")
                m["track"].append("predictions")
                edited = True
            elif o.track:
                o.track.pop()
                m["track"].pop()
                edited = True
        for o, m in objs:
            for k, e in m.items():
                require(getattr(o, k) == e, "a parameter object changes with another one", what=k, got=getattr(o, k), expected=e)
        require(given == ["chain", "prior"], "the caller's list of tracked variables is modified", got=given)
    return Result(edited and len(objs) > 1)


TARGETS = [
    Target("samplers", histories(), run, 500, 12000, shards=4),
    Target("sphere", sphere(), run_sphere, 350, 6000, shards=4),
    Target("worlds", worlds(), run_worlds, 500, 12000, shards=4),
    Target("params", params_cases(), run_params, 200, 3000, shards=1),
    Target("functions", utils_cases(), run_utils, 600, 10000, shards=1),
]
