"""Array descriptors (drawn by Hypothesis, expanded purely) and MCMC problem generator with
an independent dense reference model."""
import contextlib
import functools
import io
import math

import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2**31 - 1)


def rng(seed):
    return np.random.Generator(np.random.PCG64(seed))


# --------------------------------------------------------------------- arrays
KINDS = ["normal", "normal", "normal", "sparse", "ints", "const", "spike", "ramp", "mixed", "zero"]


def arr_desc(kinds=KINDS, scales=(-3, 3)):
    return st.fixed_dictionaries(
        {"kind": st.sampled_from(kinds), "seed": SEED, "log": st.integers(*scales)}
    )


# mostly moderate magnitudes, some very small and very large ones
wide_desc = st.one_of(arr_desc(), arr_desc(), arr_desc(), arr_desc(scales=(-30, 30)))


def real_arr(d, n):
    g = rng(d["seed"])
    k, s = d["kind"], 10.0 ** d["log"]
    if k == "normal":
        x = g.standard_normal(n)
    elif k == "sparse":
        x = g.standard_normal(n) * (g.random(n) < 0.3)
    elif k == "ints":
        x = g.integers(-3, 4, n).astype(float)
    elif k == "const":
        x = np.full(n, float(g.standard_normal()))
    elif k == "spike":
        x = np.zeros(n)
        if n:
            x[g.integers(n)] = g.standard_normal()
    elif k == "ramp":
        x = np.linspace(-1, 1, n) if n > 1 else np.ones(n)
    elif k == "mixed":
        x = g.standard_normal(n) * 10.0 ** g.integers(-4, 5, n)
    elif k == "zero":
        x = np.zeros(n)
    else:
        raise ValueError(k)
    return x * s


def cplx_arr(d, n):
    d2 = dict(d, seed=(d["seed"] + 977) % 2**31)
    return real_arr(d, n) + 1j * real_arr(d2, n)


def arr(d, n, cplx=False):
    return cplx_arr(d, n) if cplx else real_arr(d, n)


LAYOUTS = ["plain", "plain", "plain", "strided", "reversed", "readonly", "row", "subarray"]


def present(x, how):
    """The same vector in another memory layout; values and dtype unchanged."""
    if how == "strided":
        y = np.zeros(2 * x.size, dtype=x.dtype)
        y[::2] = x
        return y[::2]
    if how == "reversed":
        return x[::-1].copy()[::-1]
    if how == "row":  # one sample of a column-ordered chain
        y = np.zeros((3, x.size), dtype=x.dtype, order="F")
        y[1] = x
        return y[1]
    if how == "subarray":
        y = np.zeros(x.size + 2, dtype=x.dtype)
        y[1:-1] = x
        return y[1:-1]
    y = x.copy()
    if how == "readonly":
        y.flags.writeable = False
    return y


@contextlib.contextmanager
def np_seed(seed):
    state = np.random.get_state()
    np.random.seed(seed)
    try:
        yield
    finally:
        np.random.set_state(state)


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


# --------------------------------------------------------------------- reference numerics
def ref_soft(x, t):
    """Soft threshold from its definition: shrink the modulus by t, keep the phase."""
    x = np.asarray(x)
    out = np.zeros(x.shape, dtype=complex if np.iscomplexobj(x) else float)
    t = np.broadcast_to(t, x.shape)
    it = np.nditer(np.zeros(x.shape), flags=["multi_index"])
    for _ in it:
        i = it.multi_index
        m = abs(x[i])
        if m > t[i]:
            out[i] = x[i] * ((m - t[i]) / m)
    return out


def vsoft(x, t):
    """Vectorised soft threshold (independent of pxmcmc)."""
    x = np.asarray(x)
    m = np.abs(x)
    f = np.where(m > t, (m - t) / np.where(m > 0, m, 1.0), 0.0)
    return x * f


def random_orthonormal(seed, n, cplx=False):
    g = rng(seed)
    a = g.standard_normal((n, n))
    if cplx:
        a = a + 1j * g.standard_normal((n, n))
    q, r = np.linalg.qr(a)
    d = np.diag(r)
    return q * (d / np.abs(d))


# --------------------------------------------------------------------- MCMC problems
@st.composite
def problems(draw, nmax=6, allow_complex=True, orthonormal_analysis=True, transforms=True,
             sig_kinds=("scalar", "int", "vector", "matrix"), priors=("L1",)):
    """A Bayesian inverse problem: measurement, transform, data errors, prior. JSON only."""
    n = draw(st.integers(1, nmax))
    square = draw(st.booleans())
    m = n if square else draw(st.integers(1, nmax))
    cmode = draw(st.sampled_from(["real", "real", "cdata", "cparam", "call"])) if allow_complex else "real"
    p = {
        "n": n,
        "m": m,
        "cmode": cmode,  # real | cdata: real params complex data/op | cparam: complex params real data/op | call
        "setting": draw(st.sampled_from(["analysis", "synthesis"])),
        "meas": draw(st.sampled_from(["identity", "path", "dense", "dense"])),
        "trans": draw(st.sampled_from(["id", "rot", "rot", "diag"])) if transforms else "id",
        "oseed": draw(SEED),
        "oscale": draw(st.sampled_from([0.1, 0.5, 1.0, 1.0, 2.0])),
        "sig": draw(st.sampled_from(list(sig_kinds))),
        "sigval": draw(st.sampled_from([0.1, 0.25, 0.5, 1.0, 2.0, 3.0])),
        "sigseed": draw(SEED),
        "data": draw(arr_desc(kinds=["normal", "normal", "sparse", "ints", "zero"], scales=(-1, 2))),
        "dform": draw(st.sampled_from(["f8", "f8", "f8", "int", "f4", "strided", "readonly"])),
        "T": draw(st.sampled_from([0.0, 0.01, 0.1, 0.5, 1.0, 2.5])),
        "mu": draw(st.sampled_from([0.0, 0.3, 1.0, 1.0, 2.0, 7.5])),
    }
    return p


class Reference:
    """Dense reference of one problem: nothing here uses pxmcmc."""

    def __init__(self, p):
        self.p = p
        n, m = p["n"], p["m"]
        self.n, self.m = n, m
        g = rng(p["oseed"])
        self.cplx_params = p["cmode"] in ("cparam", "call")
        self.cplx_data = p["cmode"] in ("cdata", "call")
        cop = p["cmode"] in ("cdata", "call")
        if p["meas"] == "identity":
            A = np.eye(m, n)
        else:
            A = g.standard_normal((m, n))
            if cop:
                A = A + 1j * g.standard_normal((m, n))
            if p["meas"] == "path":
                A = A * (g.random((m, n)) < 0.6)
            A = A * p["oscale"]
        self.A = A
        # a complex basis for real images has no real prox: complex W only where it is meaningful
        cw = cop and (self.cplx_params or p["setting"] == "synthesis")
        if p["trans"] == "id":
            W = np.eye(n)
        elif p["trans"] == "rot":
            W = random_orthonormal(p["oseed"] + 1, n, cw)
        else:
            if p["setting"] == "analysis":
                # analysis prox is a prox only for orthonormal transforms
                d = np.where(g.random(n) < 0.5, -1.0, 1.0)
            else:
                d = 0.5 + 1.5 * g.random(n)
            if cw:
                d = d * np.exp(1j * g.random(n) * 6)
            W = np.diag(d)
        self.W = W  # matrix of transform.inverse
        self.M = A if p["setting"] == "analysis" else A @ W
        gs = rng(p["sigseed"])
        sv = p["sigval"]
        if p["sig"] == "scalar":
            self.sig_d = float(sv)
            C = np.eye(m) * sv**2
        elif p["sig"] == "int":
            k = int(max(1, round(sv)))
            self.sig_d = k
            C = np.eye(m) * float(k) ** 2
        elif p["sig"] == "vector":
            v = sv * (0.3 + gs.random(m))
            self.sig_d = v
            C = np.diag(v**2)
        else:
            B = gs.standard_normal((m, m))
            if self.cplx_data and p["sigseed"] % 2:  # correlated complex errors
                B = B + 1j * gs.standard_normal((m, m))
            C = sv**2 * (B @ B.conj().T / m + 0.5 * np.eye(m))
            C = (C + C.conj().T) / 2
            self.sig_d = C
        self.C = C
        self.Cinv = np.linalg.inv(C)
        self.data = arr(p["data"], m, self.cplx_data)
        form = p.get("dform", "f8")
        if form == "int" and not self.cplx_data:
            self.data = np.rint(self.data)
        elif form == "f4":
            self.data = self.data.astype(np.complex64 if self.cplx_data else np.float32).astype(self.data.dtype)
        self.T = p["T"]
        self.mu = p["mu"]
        self.scale = max(1.0, float(np.abs(self.data).max(initial=0)))

    # maps
    def forward(self, x):
        return self.M @ x

    def L2(self, x):
        r = self.data - self.forward(x)
        return float(np.real(np.conj(r) @ (self.Cinv @ r)))

    def prior(self, x):
        if self.p["setting"] == "analysis":
            x = self.W.conj().T @ x
        return float(np.sum(np.abs(x)))

    def logpost(self, x):
        return -self.mu * self.prior(x) - 0.5 * self.L2(x)

    def gradg(self, x):
        g = self.M.conj().T @ (self.Cinv @ (self.forward(x) - self.data))
        return g if self.cplx_params else np.real(g)

    def prox(self, x):
        if self.p["setting"] == "synthesis":
            out = vsoft(x, self.T)
        else:
            c = self.W.conj().T @ x
            out = self.W @ vsoft(c, self.T)
        return out if self.cplx_params else np.real(out)

    def gradlogpi(self, x, lmda):
        return -(x - self.prox(x)) / lmda - self.gradg(x)

    def lipschitz(self, lmda):
        """Upper bound of the Lipschitz constant of the drift."""
        return 1.0 / lmda + float(np.linalg.norm(self.M.conj().T @ self.Cinv @ self.M, 2))


def build(p, record=False, budget=None):
    """The same problem through pxmcmc's public API. Returns (reference, operator, prior)."""
    from scipy import sparse

    from pxmcmc.forward import ForwardOperator
    from pxmcmc.measurements import Identity, Measurement, PathIntegral
    from pxmcmc.prior import L1
    from pxmcmc.transforms import IdentityTransform, Transform

    ref = Reference(p)

    class Dense(Measurement):
        def __init__(self, A):
            super().__init__(A.shape[0], A.shape[1])
            self.A = A

        def forward(self, X):
            return self.A @ X

        def adjoint(self, Y):
            return self.A.conj().T @ Y

    class DenseTransform(Transform):
        def __init__(self, W):
            self.W = W
            self.Wi = np.linalg.inv(W)

        def forward(self, X):
            return self.Wi @ X

        def forward_adjoint(self, X):
            return self.Wi.conj().T @ X

        def inverse(self, X):
            return self.W @ X

        def inverse_adjoint(self, X):
            return self.W.conj().T @ X

    if p["meas"] == "identity":
        meas = Identity(p["m"], p["n"])
    elif p["meas"] == "path":
        meas = PathIntegral(sparse.csr_matrix(ref.A))
    else:
        meas = Dense(ref.A.copy())
    trans = IdentityTransform() if p["trans"] == "id" else DenseTransform(ref.W.copy())
    cls = ForwardOperator
    if record:
        from harness.core import Violation

        class Recording(ForwardOperator):
            calls = None
            budget = None

            def forward(self, X):
                self.calls.append(np.array(X, copy=True))
                if self.budget is not None and len(self.calls) > self.budget:
                    raise Violation(f"run() did not stop within {self.budget} forward evaluations")
                return super().forward(X)

        cls = Recording
    sig = ref.sig_d.copy() if isinstance(ref.sig_d, np.ndarray) else ref.sig_d
    form = p.get("dform", "f8")
    data = ref.data.copy()
    if form == "int" and not ref.cplx_data:
        data = data.astype(int)
    elif form == "f4":
        data = data.astype(np.complex64 if ref.cplx_data else np.float32)
    else:
        data = present(data, form)
    op = cls(data, sig, p["setting"], trans, meas, nparams=p["n"])
    if record:
        op.calls = []
        op.budget = budget
    prior = L1(p["setting"], trans.inverse, trans.inverse_adjoint, p["T"])
    return ref, op, prior


class Spy:
    """Passes everything through; remembers the points at which the named method was evaluated."""

    def __init__(self, obj, name, pts):
        self.__dict__.update(_obj=obj, _name=name, _pts=pts)

    def __getattr__(self, k):
        v = getattr(self._obj, k)
        if k != self._name:
            return v

        def f(X, *a, **kw):
            self._pts.append(np.array(X, copy=True))
            return v(X, *a, **kw)

        return f


def dedup(pts, shape):
    """Consecutive repetitions removed, other shapes dropped."""
    out = []
    for P in pts:
        if P.shape == shape and not (out and np.array_equal(out[-1], P)):
            out.append(P)
    return out


def safe_step(ref, lmda_pref, frac):
    """A step size that keeps the chain stable: delta = frac / Lipschitz(drift)."""
    return frac / ref.lipschitz(lmda_pref)


def start_vec(ref, d):
    if d.get("warm"):  # at the least-squares solution
        x = np.linalg.pinv(ref.M) @ ref.data
        return x if ref.cplx_params else np.ascontiguousarray(x.real)
    return arr(d, ref.n, ref.cplx_params)


def maybe_warm(draw, c, often=7):
    """Sometimes: data far from zero compared with their errors and a start that fits them, so that steps are small
    compared with the state."""
    if draw(st.sampled_from([False] * often + [True])):
        c["p"]["data"] = {"kind": draw(st.sampled_from(["const", "normal"])), "seed": c["p"]["data"]["seed"], "log": draw(st.sampled_from([4, 6, 6, 7]))}
        c["p"]["dform"] = "f8"
        c["start"] = {**c["start"], "warm": True}
    return c


ISF8 = 8.0  # |N(0,1)| > 8 has probability 1.2e-15


# --------------------------------------------------------------------- spherical problems
def scale_nonempty(L, B, j):
    return any(B ** (j - 1) < el < B ** (j + 1) for el in range(L))


def wav_configs(Lmin=3, Lmax=12, Bs=(1.5, 2, 2.5, 3, 4), maxJ=4):
    """All (L, B, J_min) whose wavelet scales J_min..J_max each hold at least one multipole."""
    import pys2let

    out = []
    for L in range(Lmin, Lmax + 1):
        for B in Bs:
            for J in range(0, maxJ + 1):
                if B**J >= L:
                    continue
                jmax = pys2let.pys2let_j_max(B, L, J)
                if jmax < J:
                    continue
                if all(scale_nonempty(L, B, j) for j in range(J, jmax + 1)):
                    out.append((L, B, J))
    return out


def bandlimits(L, B, J):
    """Multiresolution bandlimits of the scaling function and the wavelets (s2let convention)."""
    import pys2let

    jmax = pys2let.pys2let_j_max(B, L, J)
    return [min(math.ceil(B**J - 1e-9), L)] + [
        min(math.ceil(B ** (j + 1) - 1e-9), L) for j in range(J, jmax + 1)
    ]


def mwn(L):
    return L * (2 * L - 1)


@functools.lru_cache(maxsize=None)
def quad_weights(L):
    """MW quadrature weights from pyssht's own f_00 functional (independent of pxmcmc)."""
    import pyssht

    n = mwn(L)
    w = np.zeros((L, 2 * L - 1))
    for t in range(L):
        f = np.zeros((L, 2 * L - 1), dtype=complex)
        f[t, 0] = 1
        w[t, :] = (pyssht.forward(f, L)[0] * np.sqrt(4 * np.pi)).real
    w = w.reshape(n)
    w.flags.writeable = False
    return w


def px_synthesis_matrix(L, B, J, dirs=1, spin=0):
    """Dense wav->pixel synthesis matrix straight from pys2let; columns: scaling then wavelets."""
    import pys2let

    par = dict(B=B, L=L, J_min=J, N=dirs, spin=spin, upsample=0)
    w, s = pys2let.analysis_px2wav(np.zeros(mwn(L), dtype=complex), **par)
    nw, ns = w.size, s.size
    M = np.zeros((mwn(L), nw + ns), dtype=complex)
    for i in range(ns):
        e = np.zeros(ns, dtype=complex)
        e[i] = 1
        M[:, i] = pys2let.synthesis_wav2px(np.zeros(nw, dtype=complex), e, **par)
    for i in range(nw):
        e = np.zeros(nw, dtype=complex)
        e[i] = 1
        M[:, ns + i] = pys2let.synthesis_wav2px(e, np.zeros(ns, dtype=complex), **par)
    return M
